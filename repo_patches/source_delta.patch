From 40a1173a51cc263adcf092bb56d9c1ef3614a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 01/85] fix: set the output when (un)distorting the exact
 distortion center

---
 liboptv/src/trafo.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..9e5ba41 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -181,6 +181,11 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
+  else
+    {
+      /* the distortion center stays in place */
+      *x1 = 0.0;  *y1 = 0.0;
+    }
 }
 
 /*  correct distorted to flat-image coordinates, see correct_brown_affine_exact(),
@@ -210,7 +215,11 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        *x1 = 0.0;
+        *y1 = 0.0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
-- 
2.43.0


From 978ac50d264f0ba42e8e8803124e895f9367648d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 02/85] fix: use the distorted row offset for the shear term
 when removing distortion

---
 liboptv/src/trafo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 9e5ba41..970cd4d 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -228,7 +228,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     
     do {
         r = rq;
-        xq = (x + yq*sin(ap.she))/ap.scx
+        xq = (x + y*tan(ap.she))/ap.scx
             - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
         yq = y/cos(ap.she)
@@ -248,7 +248,7 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     /* Final step uses the iteratively-found R and x, y to apply the exact
        correction, equivalent to one more iteration. */
     r = rq;
-    *x1 = (x + yq*sin(ap.she))/ap.scx
+    *x1 = (x + y*tan(ap.she))/ap.scx
 	    - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
     *y1 = y/cos(ap.she)
-- 
2.43.0


From 809c01800cd71d136f3dafccd8548ca1bf436aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 03/85] fix: do not mix the distorted x into the distortion of
 y

---
 liboptv/src/trafo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 970cd4d..8ab0fc1 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -167,7 +167,7 @@ void metric_to_pixel(double * x_pixel
     double *x1, *y1 - output metric distorted parameters.
 */
 void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
-  double		r;
+  double		r, xf = x; /* y's distortion depends on the undistorted x */
   
   
   r = sqrt (x*x + y*y);
@@ -177,7 +177,7 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
-	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
+	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*xf*y;
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
-- 
2.43.0


From fcd44bd3605170bc9e9af8088ca602722d952b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:10 +0000
Subject: [PATCH 04/85] fix: sorting an empty target or coordinate list must
 not touch the array

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..3dc0db9 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From 31f82daec6901c62b0ece10a438886c1c131fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 05/85] fix: do not drop a candidate at the same distance as
 another

---
 liboptv/src/track.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..23f7419 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -275,15 +275,15 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
                             p4 = p3; p3 = p2; p2 = p1; p1 = j;
                             d4 = d3; d3 = d2; d2 = d1; d1 = d;
                         }
-                        else if ( d1 < d &&  d < d2 ) {
+                        else if ( d < d2 ) {
                             p4 = p3; p3 = p2; p2 = j;
                             d4 = d3; d3 = d2; d2 = d;
                         }
-                        else if ( d2 < d && d < d3 ) {
+                        else if ( d < d3 ) {
                             p4 = p3; p3 = j;
                             d4 = d3; d3 = d;
                         }
-                        else if ( d3 < d && d < d4 ) {
+                        else if ( d < d4 ) {
                             p4 = j;
                             d4 = d;
                         }
-- 
2.43.0


From 13f672ad5c48b71008a73674a05c21629f3fa47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 06/85] fix: start of sorted candidate searches could skip
 items in long lists

---
 liboptv/src/epi.c   | 3 +++
 liboptv/src/track.c | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index f14ceef..33c1b4b 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -180,6 +180,9 @@ int find_candidate (coord_2d *crd, target *pix, int num,
   /* due to truncation error we might shift to smaller x */
   j0 -= 12;  
   if (j0 < 0)  j0 = 0; 
+  /* the error grows with the number of bisections, so for long lists this 
+     may not be enough. */
+  while (j0 > 0 && crd[j0].x >= xa - tol_band_width) j0--;
 
   for (j = j0; j < num; j++) {  /* candidate search */
       	
diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 23f7419..47d8a8c 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -259,6 +259,7 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
             }
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            while (j0 > 0 && next[j0].y >= ymin) j0--; /* long lists need more */
             for (j = j0; j<num_targets; j++) {           /* candidate search */
                 if (next[j].tnr != TR_UNUSED ) {
                     if (next[j].y > ymax ) break;                     /* finish search */
@@ -347,7 +348,8 @@ int candsearch_in_pix_rest (target next[], int num_targets, double cent_x, doubl
                 else j0 -= dj;	
             }	
 
-            j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */	
+            j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            while (j0 > 0 && next[j0].y >= ymin) j0--; /* long lists need more */	
             for (j = j0; j<num_targets; j++) {           /* candidate search */	
                 if (next[j].tnr == TR_UNUSED ) {	
                     if (next[j].y > ymax ) break;                     /* finish search */	
-- 
2.43.0


From a0a66ae8725dc351f55ab550a34fb1faf1be7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 07/85] fix: write targets of a negative frame number under the
 name they are read from

---
 liboptv/src/tracking_frame_buf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a75b4c6..198cfbd 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -106,10 +106,10 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     int	tix, printf_ok, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
-    if (frame_num == 0){
-        sprintf(fileout, "%s%s", file_base, "_targets");
-    } else {
+    if (frame_num > 0) {
         sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
+    } else {
+        sprintf(fileout, "%s%s", file_base, "_targets");
     }
 
     FILEOUT = fopen(fileout, "w");
-- 
2.43.0


From a00acddc1a9d23991ac231f0ce4a5b52e543368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 08/85] fix: refuse truncated or malformed target files

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 198cfbd..7224219 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -59,7 +59,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) == 0) {
+    if (fscanf(FILEIN, "%d\n", &num_targets) != 1 || num_targets < 0) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
@@ -70,7 +70,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 		  &(buffer[tix].nx),   &(buffer[tix].ny),
 		  &(buffer[tix].sumg), &(buffer[tix].tnr) );
       
-      if (scanf_ok == 0) {
+      if (scanf_ok != 8) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
       }
-- 
2.43.0


From bc7ff80d4cda916721a207192b4637e26a545457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 09/85] fix: size the per-camera target counts of a frame by
 the number of cameras

---
 liboptv/src/tracking_frame_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 7224219..7cd46dc 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -438,7 +438,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->correspond = (corres *) calloc(max_targets, sizeof(corres));
     
     new_frame->targets = (target**) calloc(num_cams, sizeof(target*));
-    new_frame->num_targets = (int *) calloc(max_targets, sizeof(int));
+    new_frame->num_targets = (int *) calloc(num_cams, sizeof(int));
     
     for (cam = 0; cam < num_cams; cam++) {
         new_frame->targets[cam] = \
-- 
2.43.0


From 9468f665926c033a93ab581c7f75e287e5bba3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 10/85] fix: read link indices above 9999 whole

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 7cd46dc..ec4aa17 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -280,7 +280,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     targets = 0;
     do {
         if (linkagein != NULL) {
-            read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
+            read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
             if (!read_res) {
                 printf("Error with linkage file format in: %s.%d\n",
@@ -295,7 +295,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         if (prioin != NULL) {
-            read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
+            read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
             if (!read_res) {
-- 
2.43.0


From bf98e33104a5c4e789067b45a94ec87bef1ca9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 11/85] fix: a frame without particles is not a read failure

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index ec4aa17..c540c38 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -278,7 +278,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     }
     
     targets = 0;
-    do {
+    while (!feof(filein)) {
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
@@ -333,7 +333,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         
         cor_buf++;
         path_buf++;
-    } while (!feof(filein));
+    }
     
 finalize:
     if (filein != NULL) fclose(filein);
-- 
2.43.0


From 20a2e8d053ebbbc147ddfdd660948233ca3babe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 12/85] fix: refuse truncated or malformed path files

---
 liboptv/src/tracking_frame_buf.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index c540c38..819352c 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -230,13 +230,13 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
 {
     FILE *filein, *linkagein = NULL, *prioin = NULL;
     char fname[STR_MAX_LEN];
-    int read_res = 0, targets = -1, alt_link = 0;
+    int read_res = 0, num_points = 0, targets = -1, alt_link = 0;
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
     
     /* File format: first line contains the number of points, then each line is
-    a record of path and correspondence info. We don't need the nuber of points
-    because we read to EOF anyway. */
+    a record of path and correspondence info. We read to EOF, and use the number
+    of points to recognize a file that was cut short. */
     
     sprintf(fname, "%s.%d", corres_file_base, frame_num);
     filein = fopen (fname, "r");
@@ -246,8 +246,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         goto finalize;
     }
     
-    read_res = fscanf(filein, "%d\n", &read_res);
-    if (!read_res) goto finalize;
+    if (fscanf(filein, "%d\n", &num_points) != 1) goto finalize;
     
     if (linkage_file_base != NULL) {
         sprintf(fname, "%s.%d", linkage_file_base, frame_num);
@@ -259,8 +258,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(linkagein, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (fscanf(linkagein, "%d\n", &read_res) != 1) goto finalize;
     }
     
     if (prio_file_base != NULL) {
@@ -273,8 +271,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             goto finalize;
         }
     
-        read_res = fscanf(prioin, "%d\n", &read_res);
-        if (!read_res) goto finalize;
+        if (fscanf(prioin, "%d\n", &read_res) != 1) goto finalize;
     }
     
     targets = 0;
@@ -282,7 +279,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
-            if (!read_res) {
+            if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -298,7 +295,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
-            if (!read_res) {
+            if (read_res != 6) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -334,6 +331,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         cor_buf++;
         path_buf++;
     }
+    if (targets < num_points) targets = -1;
     
 finalize:
     if (filein != NULL) fclose(filein);
-- 
2.43.0


From c4f2da3e8e26a6a557edbb4ebd45903bff1bedf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 13/85] fix: report targets that could not be stored completely

---
 liboptv/src/tracking_frame_buf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 819352c..69a3666 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -137,7 +137,11 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     success = 1;
 
 finalize:
-    if (FILEOUT != NULL) fclose (FILEOUT);
+    /* Buffered data may fail to reach the disk only now. */
+    if (FILEOUT != NULL && fclose (FILEOUT) != 0) {
+        printf("Write error in file %s\n", fileout);
+        success = 0;
+    }
     return success;
 }
 
-- 
2.43.0


From 37c40257c96cd729517123b9028a41d2ebc21652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 14/85] fix: report path files that could not be stored
 completely

---
 liboptv/src/tracking_frame_buf.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 69a3666..6d8b12a 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -344,6 +344,21 @@ finalize:
     return targets;
 }
 
+/* close_written() closes a file after writing, and checks that all that was 
+ * written to it could be stored.
+ *
+ * Arguments:
+ * FILE *file - an open file.
+ *
+ * Returns:
+ * True on success. 0 if anything could not be written.
+ */
+static int close_written(FILE *file) {
+    int failed = ferror(file);
+    if (fclose(file) != 0) failed = 1;
+    return !failed;
+}
+
 /* write_path_frame() writes the correspondence and linkage information for a
  * frame with the next and previous frames. The information is weirdly 
  * distributed among two files. The rt_is file holds correspondence and 
@@ -418,9 +433,9 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     success = 1;
 
 finalize:
-    if (corres_file != NULL) fclose(corres_file);
-    if (linkage_file != NULL) fclose(linkage_file);
-    if (prio_file != NULL) fclose(prio_file);
+    if (corres_file != NULL && close_written(corres_file) == 0) success = 0;
+    if (linkage_file != NULL && close_written(linkage_file) == 0) success = 0;
+    if (prio_file != NULL && close_written(prio_file) == 0) success = 0;
     
     return success;
 }
-- 
2.43.0


From 0911e3265591cb0ef1ca02edf0254f0f32beab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 15/85] fix: writing an orientation without a distortion file
 is a success

---
 liboptv/src/calibration.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 6e7a973..e7448c1 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -43,7 +43,10 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fclose (fp);
   fp = NULL;
   
-  if (add_file == NULL) goto finalize;
+  if (add_file == NULL) {
+        success = 1;
+        goto finalize;
+  }
   fp = fopen (add_file, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", add_file);
-- 
2.43.0


From 4ad641ce9494694e46dbbfc1c104649386fbf149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 16/85] fix: report calibration files that could not be stored
 completely

---
 liboptv/src/calibration.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index e7448c1..eb24f01 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -25,7 +25,7 @@
 int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
         char *filename, char *add_file){
   FILE	*fp;
-  int  	i, success = 0;
+  int  	i, failed, success = 0;
 
   fp = fopen (filename, "w");
   if (! fp) {
@@ -40,8 +40,14 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fprintf (fp,"\n    %8.4f %8.4f\n    %8.4f\n", I.xh, I.yh, I.cc);
   fprintf (fp,"\n    %20.15f %20.15f  %20.15f\n", G.vec_x, G.vec_y, G.vec_z);
   
-  fclose (fp);
+  /* Buffered data may fail to reach the disk only now. */
+  failed = ferror (fp);
+  if (fclose (fp) != 0) failed = 1;
   fp = NULL;
+  if (failed) {
+        printf("Write error in file %s\n", filename);
+        goto finalize;
+  }
   
   if (add_file == NULL) {
         success = 1;
@@ -54,10 +60,10 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   }
   fprintf (fp, "%.8f %.8f %.8f %.8f %.8f %.8f %.8f", ap.k1, ap.k2, ap.k3, ap.p1, ap.p2,
     ap.scx, ap.she);
-  success = 1;
+  success = !ferror (fp);
   
 finalize:
-    if (fp != NULL) fclose (fp);
+    if (fp != NULL && fclose (fp) != 0) success = 0;
     return success;
 }
 
-- 
2.43.0


From 1ff1be4857ad390d472eb48ec522d27ee7ba93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 17/85] fix: close a malformed orientation file

---
 liboptv/src/calibration.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index eb24f01..4084faa 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -109,22 +109,22 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf",
 	  &(Ex->x0), &(Ex->y0), &(Ex->z0),
 	  &(Ex->omega), &(Ex->phi), &(Ex->kappa));
-  if (scan_res != 6) return 0;
+  if (scan_res != 6) goto handle_error;
   
   /* Exterior rotation matrix */
   for (i=0; i<3; i++) {
     scan_res = fscanf (fp, " %lf %lf %lf",
         &(Ex->dm[i][0]), &(Ex->dm[i][1]), &(Ex->dm[i][2]));
-    if (scan_res != 3) return 0;
+    if (scan_res != 3) goto handle_error;
   }
 
   /* Interior */
   scan_res = fscanf (fp, "%lf %lf %lf", &(I->xh), &(I->yh), &(I->cc));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   /* Glass */
   scan_res = fscanf (fp, "%lf %lf %lf", &(G->vec_x), &(G->vec_y), &(G->vec_z));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   fclose(fp);
   
-- 
2.43.0


From 9aca237061f4862ffa9135a83d2b1526e6bc5869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:09 +0000
Subject: [PATCH 18/85] fix: refuse a truncated or malformed distortion file

---
 liboptv/src/calibration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 4084faa..5b81320 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -136,6 +136,7 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
     scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf %lf",
         &(addp->k1), &(addp->k2), &(addp->k3), &(addp->p1), &(addp->p2),
         &(addp->scx), &(addp->she));
+    if (scan_res != 7) goto handle_error;
     fclose (fp);
   } else {
     printf("no addpar fallback used\n"); // Waits for proper logging.
-- 
2.43.0


From 9006df28205eaa789327f0bed87c9632adf04448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:49 +0000
Subject: [PATCH 19/85] fix: keep the result of reading a frame without
 particles (restores what bf98e33 changed)

---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 6d8b12a..d8791ff 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -279,7 +279,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     }
     
     targets = 0;
-    while (!feof(filein)) {
+    do {
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
@@ -334,7 +334,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         
         cor_buf++;
         path_buf++;
-    }
+    } while (!feof(filein));
     if (targets < num_points) targets = -1;
     
 finalize:
-- 
2.43.0


From 7562d8962f330241328ebcb5defba1e406024fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 20/85] fix: refuse a sequence parameters file that ends early

---
 liboptv/src/parameters.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 785328d..cf70a09 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -38,14 +38,14 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
 
     for (cam = 0; cam < num_cams; cam++) {
         read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok == 0) goto handle_error;
+        if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) == 0)
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) != 1)
         goto handle_error;
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) == 0)    
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) != 1)    
         goto handle_error;
 
     fclose(par_file);
-- 
2.43.0


From 80c90d1d95acd2c308458fec9ad866a1e854a810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 21/85] fix: refuse a tracking parameters file that ends early

---
 liboptv/src/parameters.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index cf70a09..b2691eb 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -156,15 +156,15 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dangle)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dacc)) == 0) goto handle_error;
-    if(fscanf(fpp, "%d\n", &(ret->add)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dangle)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dacc)) != 1) goto handle_error;
+    if(fscanf(fpp, "%d\n", &(ret->add)) != 1) goto handle_error;
     fclose (fpp);
     
     ret->dsumg = ret->dn = ret->dnx = ret->dny = 0;
-- 
2.43.0


From a46c4150e990df1c2fd2540287b6480075253429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 22/85] fix: refuse a volume parameters file that ends early

---
 liboptv/src/parameters.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index b2691eb..3237221 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -227,19 +227,19 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) != 1) goto handle_error;
     
-    if(fscanf(fpp, "%lf\n", &(ret->cnx)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cny)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cn)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->csumg)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->eps0)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cnx)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cny)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cn)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->csumg)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->eps0)) != 1) goto handle_error;
     
     fclose (fpp);
     return ret;
-- 
2.43.0


From 9c95e7fd13919afae156cf0a1f1b08035168b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 23/85] fix: refuse a control parameters file that ends early

---
 liboptv/src/parameters.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 3237221..8e93f07 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -357,26 +357,26 @@ parsing to fail */
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
     
-    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imx)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imy)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->chfield)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) == 0) goto handle_error; 
+    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imx)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imy)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->chfield)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) != 1) goto handle_error; 
     
     fclose(par_file);
     ret->mm->nlay = 1;
-- 
2.43.0


From 37a512eaada33e3aa8e1abb391d889a056158da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 24/85] fix: a missing tracking or volume parameters file is a
 failure, not a crash

---
 liboptv/src/parameters.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 8e93f07..936670c 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -156,6 +156,7 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
+    if (fpp == NULL) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
@@ -173,7 +174,7 @@ parsing to fail */
 handle_error:
     printf("Error reading tracking parameters from %s\n", filename);
     free(ret);
-    fclose (fpp);
+    if (fpp != NULL) fclose (fpp);
     return NULL;
 }
 
@@ -227,6 +228,7 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
+    if (fpp == NULL) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
     if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
@@ -247,7 +249,7 @@ parsing to fail */
 handle_error:
     printf("Error reading volume parameters from %s\n", filename);
     free(ret);
-    fclose(fpp);
+    if (fpp != NULL) fclose(fpp);
     return NULL;
 }
 
-- 
2.43.0


From 096dfcc940ab0a9cb98ab15911c855b3aa25d1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 25/85] fix: close a control parameters file without number of
 cameras

---
 liboptv/src/parameters.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 936670c..6fc064d 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -355,6 +355,7 @@ parsing to fail */
 
     if (fscanf(par_file, "%d\n", &num_cams) != 1) {
         printf("Could not read number of cameras from %s", filename);
+        fclose(par_file);
         return NULL;
     }
     ret = new_control_par(num_cams);
-- 
2.43.0


From 894ccdcb0ee0449b2fa90b2958b399f7ff82682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 26/85] fix: compare the image names of the two sequences

---
 liboptv/src/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 6fc064d..ef5e4e5 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -99,7 +99,7 @@ int compare_sequence_par(sequence_par *sp1, sequence_par *sp2) {
         return 0; /*not equal*/
 
     for (cam = 0; cam < sp1->num_cams; cam++) {
-        if (strcmp(sp1->img_base_name[cam],sp1->img_base_name[cam]) !=0){
+        if (strcmp(sp1->img_base_name[cam],sp2->img_base_name[cam]) !=0){
             return 0; /*not equal*/
         }
     }
-- 
2.43.0


From 45e28372787ef2f725aea5fdd77bc1d8f58b76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 27/85] fix: compare all glass layers of two media

---
 liboptv/src/parameters.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index ef5e4e5..a82803a 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -461,15 +461,19 @@ int compare_control_par(control_par *c1, control_par *c2) {
  */
 int compare_mm_np(mm_np *mm_np1, mm_np *mm_np2)
 {
-	//comparing first elements only of n2 and d
-	if (	mm_np1->n2[0] != mm_np2->n2[0]
-		|| 	mm_np1->d[0]  != mm_np2->d[0])
-		return 0;
+	int layer;
+
 	//comparing primitive type variables
 	if (	mm_np1->nlay != mm_np2->nlay
 		||	mm_np1->n1 	 != mm_np2->n1
 		||	mm_np1->n3	 != mm_np2->n3 )
 		return 0;
+	//comparing the layers in use
+	for (layer = 0; layer < mm_np1->nlay; layer++) {
+		if (	mm_np1->n2[layer] != mm_np2->n2[layer]
+			|| 	mm_np1->d[layer]  != mm_np2->d[layer])
+			return 0;
+	}
 	return 1;
 }
 
-- 
2.43.0


From f69340aa653fe28b93c38f9a68ec8ab31c6a7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 28/85] fix: do not write target recognition parameters to a
 file that could not be opened

---
 liboptv/src/parameters.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index a82803a..0927ddc 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -540,8 +540,10 @@ int compare_target_par(target_par *targ1, target_par *targ2) {
 void write_target_par(target_par *targ, char *filename) {
     FILE *file = fopen(filename, "w");
 
-    if (file == NULL)
+    if (file == NULL) {
         printf("Can't create file: %s\n", filename);
+        return;
+    }
 
     fprintf(file, "%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d",
             targ->gvthres[0],
-- 
2.43.0


From 72d56e04c30cfdcc035198206429c3bc60380f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 29/85] fix: image names too long for the buffer must not
 overflow it

---
 liboptv/src/parameters.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 0927ddc..f4cfbb7 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -23,7 +23,7 @@
    any reason, returns NULL.
 */
 sequence_par* read_sequence_par(char *filename, int num_cams) {
-    char line[SEQ_FNAME_MAX_LEN];
+    char line[SEQ_FNAME_MAX_LEN]; /* the %239s below fit in it */
     FILE* par_file;
     int cam, read_ok;
     sequence_par *ret;
@@ -37,7 +37,7 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
     ret = new_sequence_par(num_cams);
 
     for (cam = 0; cam < num_cams; cam++) {
-        read_ok = fscanf(par_file, "%s\n", line);
+        read_ok = fscanf(par_file, "%239s\n", line);
         if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
@@ -337,7 +337,7 @@ control_par * new_control_par(int cams) {
     any reason, returns NULL.
 */
 control_par* read_control_par(char *filename) {
-    char line[SEQ_FNAME_MAX_LEN];
+    char line[SEQ_FNAME_MAX_LEN]; /* the %239s below fit in it */
     FILE* par_file;
     int cam;
     int num_cams;
@@ -360,10 +360,10 @@ parsing to fail */
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) != 1) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-- 
2.43.0


From 6b8cf3c1d85ba80c439b7396d7b4d9e8ad0ba7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 30/85] fix: refuse incomplete manual orientation files, and do
 not close them twice

---
 liboptv/src/orientation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 21f23c2..4a7a03e 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -725,8 +725,12 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
 
     for (i=0; i<cam; i++)
         fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
-    fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]);
+    if (fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4) {
+        printf("Bad format for file: %s\n", man_ori_filename);
+        goto handle_error;
+    }
     fclose (fpp);
+    fpp = NULL;
 
     /* read the id and positions of the fixed points, assign the pre-defined to fix4 */
     fix = read_calblock(&num_fix, calblock_filename);
-- 
2.43.0


From 5a37b8731b41daf58fe2992950142524f527accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:50 +0000
Subject: [PATCH 31/85] fix: refuse a calibration block file that ends inside a
 point

---
 liboptv/src/sortgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cc72b4c..ae961b9 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -163,7 +163,7 @@ handle_error:
 */
 vec3d* read_calblock(int *num_points, char* filename) {
     FILE* fpp = NULL;
-    int	dummy, k = 0;
+    int	dummy, scan_res, k = 0;
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
@@ -174,15 +174,15 @@ vec3d* read_calblock(int *num_points, char* filename) {
     }
     
     /* Single-pass read-reallocate.*/
-    while (fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
-            &(fix[1]),&(fix[2])) == 4) 
+    while ((scan_res = fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
+            &(fix[1]),&(fix[2]))) == 4) 
     {
         ret = (vec3d *) realloc(ret, (k + 1) * sizeof(vec3d));
         vec_copy(ret[k], fix);
         k++;
     }
     
-    if (k == 0) {
+    if (k == 0 || scan_res != EOF) {
         printf("Empty of badly formatted file: %s\n", filename);
         goto handle_error;
     }
-- 
2.43.0


From 659f3426746a55d5a7a44f030a5e8c925a76fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:50 +0000
Subject: [PATCH 32/85] fix: rays normal to the glass must not be traced to
 not-a-number

---
 liboptv/src/ray_tracing.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/ray_tracing.c b/liboptv/src/ray_tracing.c
index 0af82f5..429d4b6 100644
--- a/liboptv/src/ray_tracing.c
+++ b/liboptv/src/ray_tracing.c
@@ -58,7 +58,8 @@ void ray_tracing (double x, double y, Calibration* cal, mm_np mm, vec3d X,
     unit_vector(tmp2, bp);
     
     /* Transform to direction inside glass, using Snell's law */
-    p = sqrt(1 -  n *  n) * mm.n1/mm.n2[0]; /* glass parallel */
+    /* rounding may take |n| above 1 for a ray along the glass vector */
+    p = sqrt(fmax(0, 1 -  n *  n)) * mm.n1/mm.n2[0]; /* glass parallel */
     n =  -sqrt(1 - p * p); /* glass normal */
     
     /* Propagation length in glass parallel to glass vector */
@@ -76,7 +77,7 @@ void ray_tracing (double x, double y, Calibration* cal, mm_np mm, vec3d X,
     vec_subt(a2, tmp2, tmp2);
     unit_vector(tmp2, bp);
 
-    p = sqrt(1 - n * n);
+    p = sqrt(fmax(0, 1 - n * n));
     p = p * mm.n2[0]/mm.n3;
     n = -sqrt(1 - p * p);
     
-- 
2.43.0


From 024c447d2cd659e4f2e49b2e416f22306667f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 33/85] fix: look up only cells that are inside the refraction
 table

---
 liboptv/src/multimed.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..4b514cd 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -361,10 +361,11 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     nz = cal->mmlut.nz;
     nr = cal->mmlut.nr;
     
-    /* check whether point is inside camera's object volume */
-    if (ir > nr)
+    /* check whether point is inside camera's object volume. Interpolation needs
+       the next node in each direction; sz < 0 is below the first node. */
+    if (ir >= nr - 1)
         return (0);
-    if (iz < 0  ||  iz > nz)
+    if (iz < 0  ||  sz < 0  ||  iz >= nz - 1)
         return (0);
   
     /* bilinear interpolation in r/z box */
-- 
2.43.0


From 81f01890460d682fa37a71247e7a77b96f44c98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 34/85] fix: do not change the dimensions of an existing
 refraction table without its data

---
 liboptv/src/multimed.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 4b514cd..fbfe2ec 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -300,14 +300,15 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   nr = (int)(Rmax/rw + 1);
   nz = (int)((Zmax_t-Zmin_t)/rw + 1);
 
-  /* create two dimensional mmlut structure */
-  vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
+  if (cal->mmlut.data == NULL) {
+      /* create two dimensional mmlut structure; the dimensions of an existing
+         table stay as they are, as its data does. */
+      vec_set(cal->mmlut.origin, cal_t.ext_par.x0, cal_t.ext_par.y0, Zmin_t);
   
-  cal->mmlut.nr = nr;
-  cal->mmlut.nz = nz;
-  cal->mmlut.rw = rw;
+      cal->mmlut.nr = nr;
+      cal->mmlut.nz = nz;
+      cal->mmlut.rw = rw;
   
-  if (cal->mmlut.data == NULL) {
       data = (double *) malloc (nr*nz * sizeof (double));
   
       /* fill mmlut structure */
-- 
2.43.0


From c8b25cf39ea3e72c157cf2435e3d481e8bf5f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 35/85] fix: with two cameras, pairs are what all cameras see

---
 liboptv/src/correspondences.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 3dc0db9..d24e1ed 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -677,8 +677,9 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
     match_counts[3] += match_counts[1];
   }
   
-  /*   search consistent pairs :  12, 13, 14, 23, 24, 34 */
-  if(cpar->num_cams > 1 && cpar->allCam_flag == 0) {
+  /*   search consistent pairs :  12, 13, 14, 23, 24, 34. With two cameras a
+       pair is seen by all of them. */
+  if ((cpar->num_cams > 2 && cpar->allCam_flag == 0) || cpar->num_cams == 2) {
       match0 = consistent_pair_matching(list, cpar->num_cams, 
           frm->num_targets, vpar->corrmin, con0, 4*nmax, tim);
                 
-- 
2.43.0


From 82eb1ee3474b318aa4e96d399cdf4fd308ea1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 36/85] fix: large bright areas must not overflow the waiting
 list of the detection

---
 liboptv/src/segmentation.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fbe6e9d..94b2a07 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -55,7 +55,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     register unsigned char    gv, gvref;
 
-    targpix waitlist[2048];
+    targpix *waitlist;  /* a pixel enters at most once, so the image size is enough */
 
     /* avoid many dereferences */
     int imx, imy;
@@ -69,6 +69,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     /* copy image to a temporary mask */
     img0 = (unsigned char *) calloc (imx*imy, 1);
+    waitlist = (targpix *) malloc ((imx*imy + 1) * sizeof (targpix));
     memcpy(img0, img, imx*imy);
 
     // printf("in segmentation.c memcpy succeded\n");
@@ -200,6 +201,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
           } /*  end of if-loop  */
     }
     free(img0);
+    free(waitlist);
     /* protect pix from zero memory */
     if (n_targets < 1){
         pix[0].n = 1;
@@ -264,7 +266,8 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     /* the following were not assigned, probably from globals */
     int nmax = 1024; 
     peak          *peaks, *ptr_peak;    /* detected peaks */
-    targpix       waitlist[2048];     /* pix to be tested for connectivity */
+    targpix       *waitlist;          /* pix to be tested for connectivity, each
+                                         at most once */
 
     imx = cpar->imx;
     imy = cpar->imy;
@@ -276,6 +279,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     label_img = (short *) calloc (imx*imy, sizeof(short));
     peaks = (peak *) calloc (4*nmax, sizeof(peak));
     ptr_peak = peaks;
+    waitlist = (targpix *) malloc ((imx*imy + 1) * sizeof (targpix));
 
 
     /* connectivity analysis with peak search and discontinuity criterion */
@@ -498,6 +502,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     }
     
     free (label_img);
+    free (waitlist);
     free (peaks);
 
     return (n_target);
-- 
2.43.0


From 933aff2a08b9e9800f6891a1d82f2b891c7a8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 37/85] fix: peak_fit must not look at pixels outside the image

---
 liboptv/src/segmentation.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 94b2a07..22bddc8 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -275,6 +275,14 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     thres = targ_par->gvthres[num_cam];
     disco = targ_par->discont;
 
+    /* Make sure the min/max coordinates don't cause us to access memory
+       outside the image memory: all neighbours of a pixel are looked at.
+    */
+    if (xmin <= 0) xmin = 1;
+    if (ymin <= 0) ymin = 1;
+    if (xmax >= imx) xmax = imx - 1;
+    if (ymax > imy) ymax = imy;
+
     /* allocate memory */
     label_img = (short *) calloc (imx*imy, sizeof(short));
     peaks = (peak *) calloc (4*nmax, sizeof(peak));
@@ -333,7 +341,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
                       yn = y8[k];
                       xn = x8[k];
                       
-                      if (xn<0 || xn>imx || yn<0 || yn>imy) 
+                      if (xn<0 || xn>=imx || yn<0 || yn>=imy) 
                         continue;
                       
                       n = imx*yn + xn;
@@ -397,14 +405,14 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
               if (i>0 && j>1)           check_touch (ptr_peak, pnr, *(label_img+n-imx-1));
               if (i>0)                  check_touch (ptr_peak, pnr, *(label_img+n-imx));
-              if (i>0 && j<imy-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
+              if (i>0 && j<imx-1)       check_touch (ptr_peak, pnr, *(label_img+n-imx+1));
 
               if (j>0)                  check_touch (ptr_peak, pnr, *(label_img+n-1));
-              if (j<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
+              if (j<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+1));
 
-              if (i<imx-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
-              if (i<imx-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
-              if (i<imx-1 && j<imy-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
+              if (i<imy-1 && j>0)       check_touch (ptr_peak, pnr, *(label_img+n+imx-1));
+              if (i<imy-1)              check_touch (ptr_peak, pnr, *(label_img+n+imx));
+              if (i<imy-1 && j<imx-1)   check_touch (ptr_peak, pnr, *(label_img+n+imx+1));
           }
     }
 
-- 
2.43.0


From 19b80c7dee4f3db1e8f1468027e3ed0ad73c77fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 38/85] fix: many peaks must not overflow the peak list of
 peak_fit

---
 liboptv/src/segmentation.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 22bddc8..01416f9 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -262,9 +262,9 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
-    short         *label_img;           /* target number labeling */
+    int           *label_img;           /* target number labeling */
     /* the following were not assigned, probably from globals */
-    int nmax = 1024; 
+    int max_peaks = 4096;               /* grows when needed */
     peak          *peaks, *ptr_peak;    /* detected peaks */
     targpix       *waitlist;          /* pix to be tested for connectivity, each
                                          at most once */
@@ -284,8 +284,8 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     if (ymax > imy) ymax = imy;
 
     /* allocate memory */
-    label_img = (short *) calloc (imx*imy, sizeof(short));
-    peaks = (peak *) calloc (4*nmax, sizeof(peak));
+    label_img = (int *) calloc (imx*imy, sizeof(int));
+    peaks = (peak *) calloc (max_peaks, sizeof(peak));
     ptr_peak = peaks;
     waitlist = (targpix *) malloc ((imx*imy + 1) * sizeof (targpix));
 
@@ -311,6 +311,11 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
            &&   gv >= *(img + n-imx+1)
            &&   gv >= *(img + n+imx+1) )
             {
+              if (n_peaks == max_peaks) {
+                  max_peaks *= 2;
+                  peaks = (peak *) realloc (peaks, max_peaks * sizeof(peak));
+                  ptr_peak = peaks + n_peaks;
+              }
               /* label peak in label_img, initialize peak */
               n_peaks++;
               *(label_img + n) = n_peaks;
-- 
2.43.0


From 468982a3e3ea191c59f703b7578a9b70dbf980f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 39/85] fix: peak_fit must not count united peaks twice

---
 liboptv/src/segmentation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 01416f9..ff93663 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -466,7 +466,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
           /* otherwise unify targets */
           unified++;
-          peaks[i].unr = p2;
+          peaks[i].unr = p2 + 1;    /* peak numbers start at 1, 0 is none */
           peaks[p2].x += peaks[i].x;
           peaks[p2].y += peaks[i].y;
           peaks[p2].sumg += peaks[i].sumg;
@@ -475,6 +475,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (peaks[i].ymin < peaks[p2].ymin)   peaks[p2].ymin = peaks[i].ymin;
           if (peaks[i].xmax > peaks[p2].xmax)   peaks[p2].xmax = peaks[i].xmax;
           if (peaks[i].ymax > peaks[p2].ymax)   peaks[p2].ymax = peaks[i].ymax;
+          break;    /* its pixels now belong to p2 only */
       }
     }
 
-- 
2.43.0


From 89f7afee930faf5205102aac81dd5b180eb7ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 40/85] fix: 3x3 filter results below zero or above 65535 must
 be clipped, not wrapped

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index e58fed0..941c79f 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -51,7 +51,7 @@ int filter_3(unsigned char *img, unsigned char *img_lp, filter_t filt,
         *ptr7, *ptr8, *ptr9;
 	int end;
 	double sum = 0;
-	unsigned short buf;
+	double buf; /* may be negative or large before it is clipped */
 	register int i, j;
     int image_size = cpar->imx * cpar->imy;
 
-- 
2.43.0


From 8a6c006e5fe22ebe2a7a8a6a63dc67c20830ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 41/85] fix: a box blur larger than the image must fail instead
 of leaving the image memory

---
 liboptv/src/image_processing.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 941c79f..040c807 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -124,7 +124,8 @@ void lowpass_3(unsigned char *img, unsigned char *img_lp, control_par *cpar) {
     control_par *cpar - contains image size parameters.
     
     Returns:
-    0 on failure (due to memory allocation error), 1 on success.
+    0 on failure (due to memory allocation error, or a filter larger than the
+    image), 1 on success.
     
     References:
     [1] http://www.filtermeister.com/tutorials/blur01.html
@@ -143,8 +144,14 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
     n = 2*filt_span + 1;
     nq = n*n;
     
+    /* The sums below need a filter that fits into the image. */
+    if (filt_span < 0 || n > cpar->imx || n > cpar->imy) return 0;
+    
     if ((row_accum = (int *)calloc(image_size, sizeof(int))) == NULL) return 0;
-    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) return 0;
+    if ((col_accum = (int *)calloc(cpar->imx, sizeof(int))) == NULL) {
+        free(row_accum);
+        return 0;
+    }
     
     /* Sum over lines first [1]: */
     for (i = 0; i < cpar->imy; i++) {
@@ -386,7 +393,10 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
       puts ("calloc for img_lp --> error");
       return 0;
   }
-  fast_box_blur(dim_lp, img, img_lp, cpar);
+  if (fast_box_blur(dim_lp, img, img_lp, cpar) == 0) {
+      free (img_lp);
+      return 0;
+  }
   subtract_img (img, img_lp, img_hp, cpar);
   
   /* consider field mode */
-- 
2.43.0


From d988c0a66ff490296b4b8b2c9a6d08099e1c9e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 42/85] fix: image preparation must not filter an image in
 place

---
 liboptv/src/image_processing.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 040c807..a236389 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -406,7 +406,11 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
   /* filter highpass image, if wanted */
   switch (filter_hp) {
     case 0: break;
-    case 1: lowpass_3 (img_hp, img_hp, cpar);   break;
+    /* The filters read neighbours, so they cannot work in place. */
+    case 1:
+        copy_images (img_hp, img_lp, cpar);
+        lowpass_3 (img_lp, img_hp, cpar);
+        break;
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
@@ -418,7 +422,8 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
         }
         fclose (fp);
 
-        filter_3 (img_hp, img_hp, filt, cpar);
+        copy_images (img_hp, img_lp, cpar);
+        filter_3 (img_lp, img_hp, filt, cpar);
         break;
   }
   
-- 
2.43.0


From 3300cfbb34631ac045b692c65e938ea26bc7633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:48 +0000
Subject: [PATCH 43/85] fix: report missing, incomplete and unusable filter
 files in image preparation

---
 liboptv/src/image_processing.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index a236389..6fc4436 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -414,16 +414,24 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
+        if (fp == NULL) {
+            free (img_lp);
+            return 0;
+        }
         for (i = 0; i < 9; i++) {
-            if (fscanf(fp, "%lf", (double *)filt + i) == 0) {
+            if (fscanf(fp, "%lf", (double *)filt + i) != 1) {
                 fclose(fp);
+                free (img_lp);
                 return 0;
             }
         }
         fclose (fp);
 
         copy_images (img_hp, img_lp, cpar);
-        filter_3 (img_lp, img_hp, filt, cpar);
+        if (filter_3 (img_lp, img_hp, filt, cpar) == 0) {
+            free (img_lp);
+            return 0;
+        }
         break;
   }
   
-- 
2.43.0


From 3b1972376ddf2918fc4978d50a7362f51e6b22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:29 +0000
Subject: [PATCH 44/85] fix: box blurs of more than 203 pixels overflowed near
 the first and last lines

---
 liboptv/src/image_processing.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 6fc4436..bce7b55 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -220,7 +220,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 += (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i + 1);
+            *ptrz = *ptr3 / n / (2*i + 1);
         }
     }
     
@@ -243,7 +243,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i+1);
+            *ptrz = *ptr3 / n / (2*i+1);
         }
     }
     
-- 
2.43.0


From 36d0df34f34cbdd7fd7b855b8290e6e606acc8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:38 +0000
Subject: [PATCH 45/85] fix: box blur divided the last lines by two lines too
 many

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index bce7b55..698651b 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -243,7 +243,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = *ptr3 / n / (2*i+1);
+            *ptrz = *ptr3 / n / (2*i - 1); /* 2*i - 1 lines are left */
         }
     }
     
-- 
2.43.0


From 0e9775253771055511b1055e7f4601d20133df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 46/85] fix: a particle added to a frame that could not be read
 was written before the frame's memory

---
 liboptv/src/track.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 47d8a8c..ce3e960 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -693,6 +693,9 @@ void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     corres *ref_corres;
     target **ref_targets;
     
+    /* A frame that could not be read has the count -1, but no particles. */
+    if (frm->num_parts < 0) frm->num_parts = 0;
+    
     num_parts = frm->num_parts;
     ref_path_inf = &(frm->path_info[num_parts]);
     vec_copy(ref_path_inf->x, pos);
@@ -973,9 +976,8 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                             dl = (vec_diff_norm(X[1], X[3]) +
                                   vec_diff_norm(X[0], X[1]) )/2;
                             rr = (dl/run_info->lmax + acc/tpar->dacc + angle/tpar->dangle)/(quali);
-                            register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts);
-
                             add_particle(fb->buf[2], X[3], philf);
+                            register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts - 1);
                             num_added++;
                         }
                     }
@@ -1186,9 +1188,8 @@ double trackback_c (tracking_run *run_info)
                                 dl = (vec_diff_norm(X[1], X[3]) +
                                       vec_diff_norm(X[0], X[1]) )/2;
                                 rr = (dl/run_info->lmax+acc/tpar->dacc + angle/tpar->dangle)/(quali);
-                                register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts);
-
                                 add_particle(fb->buf[2], X[3], philf);
+                                register_link_candidate(curr_path_inf, rr, fb->buf[2]->num_parts - 1);
                             }
                         }
                         in_volume = 0;
-- 
2.43.0


From 8e27fd4a062a18b96fa1cdbc99fe4a9f64727975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 47/85] fix: adding particles must not exceed the capacity of
 the frame

---
 liboptv/src/track.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index ce3e960..1b687c3 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -910,7 +910,9 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                              (quali+w[mm].freq);
                         register_link_candidate(curr_path_inf, rr, w[mm].ftnr);
 
-                        if (tpar->add) {
+                        if (tpar->add && 
+                            fb->buf[3]->num_parts < fb->buf[3]->max_targets)
+                        {
                             add_particle(fb->buf[3], X[4], philf);
                             num_added++;
                         }
@@ -951,7 +953,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
             if ( curr_path_inf->inlist == 0 && curr_path_inf->prev >= 0 ) {
                 quali = assess_new_position(X[2], v2, philf, fb->buf[2], run_info);
 
-                if (quali>=2) {
+                if (quali>=2 && fb->buf[2]->num_parts < fb->buf[2]->max_targets) {
                     vec_copy(X[3], X[2]);
                     in_volume = 0;
 
@@ -1166,7 +1168,7 @@ double trackback_c (tracking_run *run_info)
             if (tpar->add) {
                 if ( curr_path_inf->inlist == 0) {
                     quali = assess_new_position(X[2], v2, philf, fb->buf[2], run_info);
-                    if (quali>=2) {
+                    if (quali>=2 && fb->buf[2]->num_parts < fb->buf[2]->max_targets) {
                         //vec_copy(X[3], X[2]);
                         in_volume = 0;
 
-- 
2.43.0


From 39cc8f401752a456a15657b10b95c17a45a1186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 48/85] fix: added particles kept the targets of another
 frame's particle for cameras that do not exist

---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 1b687c3..f8b896a 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -703,9 +703,9 @@ void add_particle(frame *frm, vec3d pos, int cand_inds[][MAX_CANDS]) {
     
     ref_corres = &(frm->correspond[num_parts]);
     ref_targets = frm->targets;
+    for (cam = 0; cam < TR_MAX_CAMS; cam++) ref_corres->p[cam] = CORRES_NONE;
+    
     for (cam = 0; cam < frm->num_cams; cam++) {
-        ref_corres->p[cam] = CORRES_NONE;
-        
         /* We always take the 1st candidate, apparently. Why did we fetch 4? */
         if(cand_inds[cam][0] != PT_UNUSED) {
             _ix = cand_inds[cam][0];
-- 
2.43.0


From e2d4710767ac97d64b21eaa1e33ff3da94520ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 49/85] fix: a particle with reset links kept link candidates
 of an earlier use of its place

---
 liboptv/src/tracking_frame_buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index d8791ff..e9418f8 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -208,6 +208,7 @@ void reset_links(P *self) {
     self->prev = PREV_NONE;
     self->next = NEXT_NONE;
     self->prio = PRIO_DEFAULT;
+    self->inlist = 0; /* candidates of an earlier use are not its own */
 }
 
 /* Reads rt_is files. these files contain both the path info and the 
-- 
2.43.0


From 5ea9d4bf4097669ed98f9218cbfca5bfff900093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:46 +0000
Subject: [PATCH 50/85] fix: a frame that could not be read completely kept the
 targets of the frame before it

---
 liboptv/src/tracking_frame_buf.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index e9418f8..892552e 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -517,22 +517,27 @@ int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
     char *prio_file_base, char **target_file_base,
     int frame_num)
 {
-    int cam;
+    int cam, success = 1;
     
     self->num_parts = read_path_frame(self->correspond, self->path_info,
         corres_file_base, linkage_file_base, prio_file_base, frame_num);
-    if (self->num_parts == -1) return 0;
+    if (self->num_parts == -1) success = 0;
     
     /* Prevent crashes by testing for initial allocation */
     if (self->num_targets == 0) return 0;
     
+    /* Even if something is missing, nothing of the frame that was held here
+       before may remain. */
     for (cam = 0; cam < self->num_cams; cam++) {
         self->num_targets[cam] = read_targets(
             self->targets[cam], target_file_base[cam], frame_num);
-        if (self->num_targets[cam] == -1) return 0;
+        if (self->num_targets[cam] == -1) {
+            self->num_targets[cam] = 0;
+            success = 0;
+        }
     }
     
-    return 1;
+    return success;
 }
 
 /* write_frame() writes all of the frame associated data: correspondnces,
-- 
2.43.0


From f0ed98855df82b86d88b08ef98ec0a9c5debb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 51/85] fix: the angle of parallel or resting motion was not a
 number or a full turn

---
 liboptv/src/track.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index f8b896a..04fc91e 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -192,21 +192,24 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double norms, cosine;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
 
     *acc = vec_diff_norm(v0, v1);
 
-
-    if ((v0[0] == -v1[0]) && (v0[1] == -v1[1]) && (v0[2] == -v1[2])) {
-        *angle = 200;
-    } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
-        *angle = 0;         // otherwise it returns NaN
-    } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+    norms = vec_norm(v0) * vec_norm(v1);
+    if (norms == 0) {
+        *angle = 0;         /* no direction to turn from or to */
+        return;
     }
+    
+    /* rounding may bring the cosine of parallel vectors beyond 1 */
+    cosine = vec_dot(v0, v1) / norms;
+    if (cosine > 1) cosine = 1;
+    if (cosine < -1) cosine = -1;
+    *angle = (200./M_PI) * acos(cosine);
 }
 
 
-- 
2.43.0


From b6b434b19583865299c408cb9bacad63dcb19806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 52/85] fix: the observed Y range started from uninitialised
 values

---
 liboptv/src/tracking_run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8c983ae..c8a3c7d 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -67,6 +67,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
     tr->lmax = norm((tpar->dvxmin - tpar->dvxmax), \
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
+    /* the view of the cameras extends these */
+    tr->ymin = 1e20;
+    tr->ymax = -1e20;
     volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
                     &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
                     vpar, cpar, cal);
-- 
2.43.0


From 7b96f4ca1d988842c8e9fe344b4cb2d571a9c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 53/85] fix: a tracking run of missing or incomplete settings
 files crashed

---
 liboptv/src/tracking_run.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index c8a3c7d..c158ec6 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -13,14 +13,30 @@
    char *tpar_fname - path to tracking parameters file.
    char *vpar_fname - path to volume parameters file.
    char *cpar_fname - path to control parameters file.
+   
+   Returns:
+   the new object, or NULL if one of the files could not be read.
 */
 tracking_run* tr_new_legacy(char *seq_par_fname, char *tpar_fname,
     char *vpar_fname, char *cpar_fname, Calibration **cal) 
 {
     control_par *cpar = read_control_par(cpar_fname);
-    sequence_par *seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
-    return tr_new(seq_par, read_track_par(tpar_fname), 
-        read_volume_par(vpar_fname), cpar, 4, 20000,
+    sequence_par *seq_par = NULL;
+    track_par *tpar = read_track_par(tpar_fname);
+    volume_par *vpar = read_volume_par(vpar_fname);
+    
+    if (cpar != NULL)
+        seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
+    
+    if (cpar == NULL || seq_par == NULL || tpar == NULL || vpar == NULL) {
+        if (seq_par != NULL) free_sequence_par(seq_par);
+        if (cpar != NULL) free_control_par(cpar);
+        free(tpar);
+        free(vpar);
+        return NULL;
+    }
+    
+    return tr_new(seq_par, tpar, vpar, cpar, 4, 20000,
         "res/rt_is", "res/ptv_is", "res/added", cal, 10000);
 }
 
-- 
2.43.0


From 4b6ceaeb505efa605cabea10c8ce7ebb32c1bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 54/85] fix: freeing a tracking run left its frames and image
 names allocated

---
 liboptv/src/tracking_run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index c158ec6..7cfd631 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -102,9 +102,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
    TrackingRun *tr - points to the TrackingRun object to free.
 */
 void tr_free(tracking_run *tr) {
+    fb_free(tr->fb);
     free(tr->fb);
-    free(tr->seq_par->img_base_name);
-    free(tr->seq_par);
+    free_sequence_par(tr->seq_par);
     free(tr->tpar);
     free(tr->vpar);
     free_control_par(tr->cpar);
-- 
2.43.0


From 87991ab13383b51b34c8a8221768855f0da0034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:32 +0000
Subject: [PATCH 55/85] fix: restarting a tracking run used a frame left by the
 run before

---
 liboptv/src/track.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 04fc91e..a6464b8 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -45,7 +45,7 @@
       a frame buffer with 4 positions.
 */
 void track_forward_start(tracking_run *tr) {
-    int step;
+    int step, cam;
     /* Prime the buffer with first frames */
     for (step = tr->seq_par->first; 
          step < tr->seq_par->first + TR_BUFSPACE - 1; 
@@ -55,6 +55,11 @@ void track_forward_start(tracking_run *tr) {
         fb_next(tr->fb);
     }
     fb_prev(tr->fb);
+    
+    /* There is no frame before the first, not even one of an earlier run. */
+    tr->fb->buf[0]->num_parts = 0;
+    for (cam = 0; cam < tr->fb->num_cams; cam++)
+        tr->fb->buf[0]->num_targets[cam] = 0;
 }
 
 /* reset_foundpix_array() sets default values for foundpix objects in an array.
-- 
2.43.0


From a7d25a42e2fa821608fc881e7e442f6b615a16e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:47 +0000
Subject: [PATCH 56/85] fix: restarting a tracking run kept the totals of the
 run before

---
 liboptv/src/track.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index a6464b8..848afa7 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -46,6 +46,10 @@
 */
 void track_forward_start(tracking_run *tr) {
     int step, cam;
+    
+    tr->npart = 0;
+    tr->nlinks = 0;
+    
     /* Prime the buffer with first frames */
     for (step = tr->seq_par->first; 
          step < tr->seq_par->first + TR_BUFSPACE - 1; 
-- 
2.43.0


From 8e8bd0e23f1b4c4b860d1088a7f7e4db67414ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:17 +0000
Subject: [PATCH 57/85] fix: tracking a range of two frames used a frame after
 the range

---
 liboptv/src/track.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 848afa7..804ef06 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -55,7 +55,13 @@ void track_forward_start(tracking_run *tr) {
          step < tr->seq_par->first + TR_BUFSPACE - 1; 
          step++) 
     {
-        fb_read_frame_at_end(tr->fb, step, 0);
+        if (step <= tr->seq_par->last) {
+            fb_read_frame_at_end(tr->fb, step, 0);
+        } else {
+            tr->fb->buf[TR_BUFSPACE - 1]->num_parts = 0;
+            for (cam = 0; cam < tr->fb->num_cams; cam++)
+                tr->fb->buf[TR_BUFSPACE - 1]->num_targets[cam] = 0;
+        }
         fb_next(tr->fb);
     }
     fb_prev(tr->fb);
-- 
2.43.0


From b45528321ec3994181520360360e8985ad5e2b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 58/85] fix: particles were linked to particles their frame
 does not have

---
 liboptv/src/track.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 804ef06..48308c2 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -603,7 +603,7 @@ foundpix *sorted_candidates_in_volume(vec3d center, vec2d center_proj[],
     foundpix *points;
     double right[TR_MAX_CAMS], left[TR_MAX_CAMS];
     double down[TR_MAX_CAMS], up[TR_MAX_CAMS];
-    int cam, num_cams, num_cands;
+    int cam, cand, num_cams, num_cands;
     
     num_cams = frm->num_cams;
     points = (foundpix*) calloc(num_cams*MAX_CANDS, sizeof(foundpix));
@@ -622,6 +622,14 @@ foundpix *sorted_candidates_in_volume(vec3d center, vec2d center_proj[],
             &(points[cam*MAX_CANDS]), run->cpar
         );
     }
+    
+    /* targets may belong to particles that could not be read */
+    for (cand = 0; cand < num_cams*MAX_CANDS; cand++) {
+        if (points[cand].ftnr < 0 || points[cand].ftnr >= frm->num_parts) {
+            points[cand].ftnr = TR_UNUSED;
+            points[cand].whichcam[cand/MAX_CANDS] = 0;
+        }
+    }
 
     /* fill and sort candidate struct */
     num_cands = sort_candidates_by_freq(points, num_cams);
-- 
2.43.0


From 8bfa1695d574cc1003a024e3d0aae92f17d107cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 59/85] fix: tracking backward used and wrote frames outside
 the range

---
 liboptv/src/track.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 48308c2..136f733 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1089,6 +1089,15 @@ void trackcorr_c_finish(tracking_run *run_info, int step)
     fb_write_frame_from_start(run_info->fb, step);
 }
 
+/* make a frame hold nothing, for steps that have no frame in the sequence */
+static void empty_frame(frame *frm) {
+    int cam;
+    
+    frm->num_parts = 0;
+    for (cam = 0; cam < frm->num_cams; cam++)
+        frm->num_targets[cam] = 0;
+}
+
 /*     track backwards */
 double trackback_c (tracking_run *run_info)
 {
@@ -1125,7 +1134,11 @@ double trackback_c (tracking_run *run_info)
 
     /* Prime the buffer with first frames */
     for (step = seq_par->last; step > seq_par->last - 4; step--) {
-        fb_read_frame_at_end(fb, step, 1);
+        if (step >= seq_par->first) {
+            fb_read_frame_at_end(fb, step, 1);
+        } else {
+            empty_frame(fb->buf[TR_BUFSPACE - 1]);
+        }
         fb_next(fb);
     }
     fb_prev(fb);
@@ -1289,7 +1302,11 @@ double trackback_c (tracking_run *run_info)
 
         fb_next(fb);
         fb_write_frame_from_start(fb, step);
-        if(step > seq_par->first + 2) { fb_read_frame_at_end(fb, step - 3, 1); }
+        if(step > seq_par->first + 2) {
+            fb_read_frame_at_end(fb, step - 3, 1);
+        } else {
+            empty_frame(fb->buf[TR_BUFSPACE - 1]);
+        }
     }     /* end of sequence loop */
 
     /* average of all steps */
@@ -1300,7 +1317,7 @@ double trackback_c (tracking_run *run_info)
             npart, nlinks, npart-nlinks);
 
     fb_next(fb);
-    fb_write_frame_from_start(fb, step);
+    if (step >= seq_par->first) fb_write_frame_from_start(fb, step);
 
     return nlinks;
 }
-- 
2.43.0


From 73df1a2179e2a77cca01b853e86cbabffceda2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 60/85] fix: tracking backward over two frames returned
 not-a-number

---
 liboptv/src/track.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 136f733..6cb0f28 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1310,8 +1310,10 @@ double trackback_c (tracking_run *run_info)
     }     /* end of sequence loop */
 
     /* average of all steps */
-    npart /= (seq_par->last - seq_par->first - 1);
-    nlinks /= (seq_par->last - seq_par->first - 1);
+    if (seq_par->last - seq_par->first > 1) {
+        npart /= (seq_par->last - seq_par->first - 1);
+        nlinks /= (seq_par->last - seq_par->first - 1);
+    }
 
     printf ("Average over sequence, particles: %5.1f, links: %5.1f, lost: %5.1f\n",
             npart, nlinks, npart-nlinks);
-- 
2.43.0


From e1bb07084e3b726d0be3cca7b2ed72f67b3af9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:24 +0000
Subject: [PATCH 61/85] fix: tracking backward followed links to particles that
 do not exist

---
 liboptv/src/track.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 6cb0f28..ee7c3d9 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1153,6 +1153,9 @@ double trackback_c (tracking_run *run_info)
 
             /* We try to find link only if the forward search failed to. */
             if ((curr_path_inf->next < 0) || (curr_path_inf->prev != -1)) continue;
+            
+            /* The frame it is linked to may not have been readable. */
+            if (curr_path_inf->next >= fb->buf[0]->num_parts) continue;
 
             for (j = 0; j < 6; j++) vec_init(X[j]);
             curr_path_inf->inlist = 0;
@@ -1268,6 +1271,7 @@ double trackback_c (tracking_run *run_info)
 
                 /* old which link to prev has to be checked */
                 if ((ref_path_inf->prev != PREV_NONE) && \
+                    (ref_path_inf->prev < fb->buf[3]->num_parts) && \
                     (ref_path_inf->next == NEXT_NONE) )
                 {
                     vec_copy(X[0], fb->buf[0]->path_info[curr_path_inf->next].x);
-- 
2.43.0


From da35216297af90e5e5313c3cd2715b9133873141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 62/85] fix: fine orientation leaked its working copies

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 4a7a03e..481fc60 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -577,15 +577,18 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     free(X);
     free(P);
     free(y);
+    free(yh);
     free(Xbeta);
     free(Xh);
 
     if (stopflag){
         rotation_matrix(&(cal->ext_par));
         memcpy(cal_in, cal, sizeof (Calibration));
+        free(cal);
         return resi;
     }
     else {
+        free(cal);
         free(resi);
         return NULL;
     }
-- 
2.43.0


From 5265643e18581e53a3aa0bd8f8ae1969b8a191c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 63/85] fix: orientation reported success with not-a-number
 results

---
 liboptv/src/orientation.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 481fc60..79511f0 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -253,7 +253,7 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 {
     int  	i,j,n, itnum, stopflag, n_obs=0, maxsize;
 
-    double  ident[IDT], XPX[NPAR][NPAR], XPy[NPAR], beta[NPAR], omega=0;
+    double  ident[IDT], XPX[NPAR][NPAR], XPy[NPAR], beta[NPAR] = {0}, omega=0;
     double xp, yp, xpd, ypd, xc, yc, r, qq, p, sumP;
 
     int numbers;
@@ -498,6 +498,8 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
       P[n_obs+9] = ( ! flags->sheflag) ?  POS_INF : 1;
 
       n_obs += IDT;
+      if (n_obs < numbers) break; /* too few points to determine the unknowns */
+
       sumP = 0;
       for (i = 0; i < n_obs; i++) {       	/* homogenize */
           p = sqrt (P[i]);
@@ -519,7 +521,8 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
       stopflag = 1;
       for (i = 0; i < numbers; i++) {
-          if (fabs (beta[i]) > CONVERGENCE)  stopflag = 0;
+          /* also catches not-a-number, from a singular system */
+          if (! (fabs (beta[i]) <= CONVERGENCE))  stopflag = 0;
       }
 
       if ( ! flags->ccflag) beta[6] = 0.0;
@@ -680,7 +683,8 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
         stopflag = 1;
         for (i = 0; i < 6; i++) {
-          if (fabs (beta[i]) > 0.1 )
+          /* also catches not-a-number, from a singular system */
+          if (! (fabs (beta[i]) <= 0.1))
             stopflag = 0;
         }
     
-- 
2.43.0


From 20144bf7fc14c7bdb2c9bfbfc17e329fe27d36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 64/85] fix: raw orientation overflowed its arrays with more
 than five points

---
 liboptv/src/orientation.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 79511f0..a6b40a2 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -619,18 +619,15 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
 int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[])
 {
-    double  X[10][6], y[10], XPX[6][6], XPy[6], beta[6];
-    int     i, j, n, itnum, stopflag;
+    double  (*X)[6], *y, XPX[6][6], XPy[6], beta[6];
+    int     i, n, itnum, stopflag;
     double  dm = 0.0001,  drad = 0.0001;
     double 	xp, yp, xc, yc;
     vec3d   pos;
 
-    /* init X, y (set to zero) */
-    for (i = 0; i < 10; i++) {
-      for (j = 0; j < 6; j++)
-        X[i][j] = 0;
-      y[i] = 0;
-    }
+    /* two rows per point, set to zero */
+    X = calloc(2*nfix + 1, sizeof(*X));
+    y = calloc(2*nfix + 1, sizeof(double));
 
     cal->added_par.k1 = 0;
     cal->added_par.k2 = 0;
@@ -697,6 +694,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
     }
 
+    free(X);
+    free(y);
+
     if (stopflag) {
         rotation_matrix(&(cal->ext_par));
     }
-- 
2.43.0


From 921b29e1677552bc366c4c508a1e78d06b9440f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 65/85] fix: fine orientation lost the interface vector it had
 solved for

---
 liboptv/src/orientation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index a6b40a2..409ee46 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -560,6 +560,11 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
           cal->glass_par.vec_x += e2[0]*nGl*beta[17];
           cal->glass_par.vec_y += e2[1]*nGl*beta[17];
           cal->glass_par.vec_z += e2[2]*nGl*beta[17];
+
+          /* what the derivatives of the next iteration start from */
+          safety_x = cal->glass_par.vec_x;
+          safety_y = cal->glass_par.vec_y;
+          safety_z = cal->glass_par.vec_z;
       }
     }
 
-- 
2.43.0


From d0fee16a7f8362f2ef7f0efd7553a5e1e49b9f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 66/85] fix: fine orientation compared undistorted measurements
 with distorted projections

---
 liboptv/src/orientation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 409ee46..6f8d768 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -361,8 +361,8 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
         }
 
         /* get metric flat-image coordinates of the detected point */
+        /* note img_coord() below applies the distortion to the known point */
         pixel_to_metric (&xc, &yc, pix[i].x, pix[i].y, cpar);
-        correct_brown_affin (xc, yc, cal->added_par, &xc, &yc);
 
         /* Projected 2D position on sensor of corresponding known point */
         rotation_matrix(&(cal->ext_par));
-- 
2.43.0


From ee807dbe61256df7c3b6f75e456023e0156d86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 67/85] fix: single camera correspondences gave x in place of y

---
 py_bind/optv/correspondences.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 1b14fc3..d022df3 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -250,7 +250,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
     """
     cdef: 
         int pt, num_points
-        coord_2d *corrected = <coord_2d *> malloc(sizeof(coord_2d *))
+        coord_2d *corrected
     
     corrected = (<MatchedCoords>flat_coords[0]).buf
 
@@ -276,7 +276,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
         if p1 > -1:
             targ = img_pts[0][p1]
             clique_targs[0, pt, 0] = (<Target> targ)._targ.x
-            clique_targs[0, pt, 1] = (<Target> targ)._targ.x
+            clique_targs[0, pt, 1] = (<Target> targ)._targ.y
             # we also update the tnr, see docstring of correspondences
             (<Target> targ)._targ.tnr = pt
 
-- 
2.43.0


From 532addd853dd53533ded9a3f095e11579a96271d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 68/85] fix: correspondences binding wrote beyond its counts
 with less than four cameras

---
 py_bind/optv/correspondences.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index d022df3..9dc645b 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -164,7 +164,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         np.ndarray[ndim=3, dtype=np.float64_t] clique_targs
         
         # Return buffers:
-        int *match_counts = <int *> malloc(num_cams * sizeof(int))
+        int match_counts[4] # cliques of 4, 3 and 2, and total, for any num_cams
         n_tupel *corresp_buf
     
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -214,11 +214,11 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_corresp[clique_type] = clique_ids
     
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
-    free(match_counts)
+    free(corrected)
     free(corresp_buf) # Note this for future returning of correspondences.
     
     return sorted_pos, sorted_corresp, num_targs
-- 
2.43.0


From bb2ebba98fb442ebc9c08b65d10aeb0097eea60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 69/85] fix: image preprocessing binding ignored the output
 array and memory layout

---
 py_bind/optv/image_processing.pyx | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 6add162..c08207c 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -32,31 +32,40 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     numpy.ndarray representing the result image.
     '''
 
+    cdef np.ndarray[ndim=2, dtype=np.uint8_t] result
+    
     # check arrays dimensions
     if input_img.ndim != 2:
         raise TypeError("Input array must be two-dimensional")
     if (output_img is not None) and (input_img.shape[0] != output_img.shape[0] or
                          input_img.shape[1] != output_img.shape[1]):
         raise ValueError("Different shapes of input and output images.")
-    else:
-        output_img = np.empty_like(input_img)
+    if (input_img.shape[0] != control._control_par.imy or 
+            input_img.shape[1] != control._control_par.imx):
+        raise ValueError("Image size differs from the one in control parameters.")
     
     if filter_hp == 2:
-        if filter_file == None or not isinstance(filter_file, string_types):
+        if not isinstance(filter_file, string_types + (bytes,)):
             raise ValueError("Expecting a filter file name, received None or non-string.")
+        if not isinstance(filter_file, bytes):
+            filter_file = filter_file.encode('UTF-8')
     else:
         filter_file=b""
         
-    for arr in (input_img, output_img):
-        if not arr.flags['C_CONTIGUOUS']:
-            np.ascontiguousarray(arr)
+    # The C code works on contiguous memory.
+    input_img = np.ascontiguousarray(input_img)
+    result = np.empty_like(input_img)
     
     if (1 != prepare_image( < unsigned char *> input_img.data,
-                            < unsigned char *> output_img.data,
+                            < unsigned char *> result.data,
                             lowpass_dim,
                             filter_hp,
                             filter_file,
                             control._control_par)):
         raise Exception("prepare_image C function failed: "
                       + "failure of memory allocation or filter file reading")
+
+    if output_img is None:
+        return result
+    output_img[...] = result
     return output_img              
-- 
2.43.0


From 5801d2fbb93231baac5485356c5bf2b25756a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 70/85] fix: target recognition binding read and wrote beyond
 its arrays

---
 py_bind/optv/segmentation.pyx | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index d40dff9..c560df0 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -31,9 +31,6 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     """
     Detects targets (contiguous bright blobs) in an image.
     
-    Limited to ~20,000 targets per image for now. This limitation comes from
-    the structure of underlying C code.
-    
     Arguments:
     np.ndarray img - a numpy array holding the 8-bit gray image.
     TargetParams tpar - target recognition parameters s.a. size bounds etc.
@@ -51,7 +48,7 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     cdef:
         TargetArray t = TargetArray()
         target *ret
-        target *targs = <target *> calloc(1024*20, sizeof(target))
+        target *targs
         int num_targs
         int xmin, xmax, ymin, ymax
     
@@ -68,17 +65,29 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     else:
         ymin, ymax = subrange_y
     
-    if img.shape[0] != ymax or img.shape[1] != xmax:
+    if (img.shape[0] != cparam._control_par[0].imy or
+            img.shape[1] != cparam._control_par[0].imx):
         raise ValueError("dimensions are not correct")
+    if (xmin < 0 or ymin < 0 or xmax > cparam._control_par[0].imx or 
+            ymax > cparam._control_par[0].imy):
+        raise ValueError("search range exceeds the image")
+    if cam < 0 or cam >= 4:
+        raise ValueError("no detection parameters for this camera")
 
-    assert img.dtype == DTYPE
+    # The C code works on contiguous memory.
+    img = np.ascontiguousarray(img)
+    
+    # No more targets than pixels.
+    targs = <target *> calloc(img.size + 1, sizeof(target))
+    if targs == NULL:
+        raise MemoryError("Failed to allocate target array.")
 
     # The core liboptv call:
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
     
     # Fit the memory size snugly and generate the Python return value.
-    ret = <target *>realloc(targs, num_targs * sizeof(target))
+    ret = <target *>realloc(targs, (num_targs + 1) * sizeof(target))
     if ret == NULL:
         free(targs)
         raise MemoryError("Failed to reallocate target array.")
-- 
2.43.0


From 60f61184bbbfb588a8ba465c6d6afd89e203bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 71/85] fix: orientation bindings misread strided targets, did
 not check shapes and leaked

---
 py_bind/optv/orientation.pyx | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index b3ef927..9fce74e 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -37,6 +37,9 @@ def match_detection_to_ref(Calibration cal,
     TargetArray holding the sorted targets.
     """
 
+    if ref_pts.shape[1] != 3:
+        raise ValueError("Reference points must have three coordinates.")
+
     if len(img_pts) < len(ref_pts):
         # raise ValueError('Must have at least as many targets as ref. points.')
         print('Must have at least as many targets as ref. points.')
@@ -71,6 +74,14 @@ cdef calibration** cal_list2arr(list cals):
 
     return calib
 
+def check_targets(targets, cals):
+    """
+    Raises an exception unless the (num_targets, num_cams, 2) targets array
+    fits the list of calibrations.
+    """
+    if targets.shape[1] != len(cals) or targets.shape[2] != 2:
+        raise ValueError("Targets array does not match the number of cameras.")
+
 def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                     ControlParams cparam, cals, VolumeParams vparam):
     """
@@ -120,9 +131,12 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
     
@@ -137,6 +151,7 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                             calib[0], cparam._control_par.mm, vparam._volume_par, 
                             <vec3d> np.PyArray_GETPTR2(res, pt, 0));
 
+    free(calib)
     return res, rcm
           
 
@@ -162,9 +177,12 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
 
@@ -179,6 +197,7 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                                  cparam._control_par.mm, calib,
                                  <vec3d> np.PyArray_GETPTR2(res, pt, 0))
 
+    free(calib)
     return res, rcm
 
 def external_calibration(Calibration cal, 
@@ -326,9 +345,13 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
     cdef:
         np.ndarray[ndim=2, dtype=pos_t] targ
         vec2d **ctargets
-        calibration **calib = cal_list2arr(cals)
+        calibration **calib
         int cam, num_cams
+        double res
     
+    check_targets(targets, cals)
+    calib = cal_list2arr(cals)
+
     num_cams = targets.shape[1]
     num_pts = targets.shape[0]
     ctargets = <vec2d **>calloc(num_pts, sizeof(vec2d*))
@@ -337,5 +360,9 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
         targ = targets[pt]
         ctargets[pt] = <vec2d *>(targ.data)
     
-    return weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
+    res = weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
         cparam._control_par.mm, calib,  db_length, db_weight)
+    
+    free(ctargets)
+    free(calib)
+    return res
-- 
2.43.0


From 7a2d9c234e9c4972dd32e6323b64fd959d0526ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 72/85] fix: full calibration binding gave residuals of wrong
 points and garbage

---
 py_bind/optv/orientation.pyx | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index 9fce74e..9718253 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -224,6 +224,11 @@ def external_calibration(Calibration cal,
         target *targs
         vec3d *ref_coord
     
+    if ref_pts.shape[1] != 3 or img_pts.shape[1] != 2:
+        raise ValueError("Expecting (n,3) reference and (n,2) image points.")
+    if len(img_pts) < len(ref_pts):
+        raise ValueError("Must have an image point for each reference point.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
     
@@ -287,6 +292,11 @@ def full_calibration(Calibration cal,
         orient_par *orip
         double *residuals
     
+    if ref_pts.shape[1] != 3:
+        raise ValueError("Reference points must have three coordinates.")
+    if len(img_pts) < len(ref_pts):
+        raise ValueError("Must have a target for each reference point.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
 
@@ -306,7 +316,7 @@ def full_calibration(Calibration cal,
     orip[0].sheflag = (1 if 'shear' in flags else 0)
     orip[0].interfflag = 0 # This also solves for the glass, I'm skipping it.
     
-    err_est = np.empty((NPAR + 1) * sizeof(double))
+    err_est = np.empty(NPAR + 1)
     residuals = orient(cal._calibration, cparam._control_par, len(ref_pts), 
         ref_coord, img_pts._tarr, orip, <double *>err_est.data)
     
@@ -316,12 +326,13 @@ def full_calibration(Calibration cal,
         free(residuals)
         raise ValueError("Orientation iteration failed, need better setup.")
     
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
+    # Only targets matched with their reference point take part, see orient().
+    used = np.array([ix for ix in range(len(ref_pts)) 
+        if img_pts[ix].pnr() == ix], dtype=np.int_)
+    ret = np.empty((len(used), 2))
     
-    for ix in range(len(img_pts)):
+    for ix in range(len(used)):
         ret[ix] = (residuals[2*ix], residuals[2*ix + 1])
-        used[ix] = img_pts[ix].pnr()
     
     free(residuals)
     return ret, used, err_est
-- 
2.43.0


From 850861232617a64d2442bef7fdf1638c6344b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 73/85] fix: reading a calibration from Python ignored the
 fallback file and crashed when failing

---
 py_bind/optv/calibration.pyx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 613bc61..c986485 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -70,11 +70,21 @@ cdef class Calibration:
         add_file - optional path to file containing distortion parameters.
         fallback_file - optional path to file used in case ``add_file`` fails
             to open.
+        
+        Raises:
+        IOError if reading failed, then the calibration is left as it was.
         """
-        free(self._calibration);
-        self._calibration = read_calibration(
-            (<char *>ori_file if ori_file != None else < char *> 0),
-            (<char *>add_file if add_file != None else < char *> 0), NULL)
+        cdef calibration *new_cal
+        
+        new_cal = read_calibration(<char *>ori_file,
+            (<char *>add_file if add_file != None else < char *> 0), 
+            (<char *>fallback_file if fallback_file != None else < char *> 0))
+        if new_cal == NULL:
+            raise IOError("Failed to read calibration.")
+        
+        # In place, because a Tracker may be holding on to the memory.
+        self._calibration[0] = new_cal[0]
+        free(new_cal)
         
     def write(self, filename, add_file):
         """
-- 
2.43.0


From 706965578929a8fd8e90b53ace63f23afa9d2df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 74/85] fix: reading parameters from Python crashed or left
 nothing when failing

---
 py_bind/optv/parameters.pxd |  1 +
 py_bind/optv/parameters.pyx | 46 ++++++++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/py_bind/optv/parameters.pxd b/py_bind/optv/parameters.pxd
index b9149b5..4165c0e 100644
--- a/py_bind/optv/parameters.pxd
+++ b/py_bind/optv/parameters.pxd
@@ -13,6 +13,7 @@ cdef extern from "optv/parameters.h":
         int dsumg, dn, dnx, dny, add
     
     ctypedef struct sequence_par:
+        int num_cams
         char ** img_base_name
         int first, last
         
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index a5c703c..9c7f162 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -222,8 +222,13 @@ cdef class TrackingParams:
         Reads tracking parameters from an old-style .par file having the
         objects' arguments ordered one per line.
         """
-        free(self._track_par)
-        self._track_par = c_read_track_par(file_name)
+        cdef track_par *new_par = c_read_track_par(file_name)
+        if new_par == NULL:
+            raise IOError("Problem reading tracking parameters.")
+        
+        # In place, because a Tracker may be holding on to the memory.
+        self._track_par[0] = new_par[0]
+        free(new_par)
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
@@ -382,12 +387,21 @@ cdef class SequenceParams:
         filename - path to the text file containing the parameters.
         num_cams - expected number of cameras
         """
-        # free the memory of previous C struct and its inner strings before 
-        # creating a new one.
-        c_free_sequence_par(self._sequence_par)
+        cdef:
+            sequence_par *new_par
+            sequence_par tmp
         
         # read parameters from file to a new sequence_par C struct
-        self._sequence_par = c_read_sequence_par(filename, num_cams)
+        new_par = c_read_sequence_par(filename, num_cams)
+        if new_par == NULL:
+            raise IOError("Problem reading sequence parameters.")
+        
+        # Swap in place, because a Tracker may be holding on to the memory, and
+        # free the previous inner strings.
+        tmp = self._sequence_par[0]
+        self._sequence_par[0] = new_par[0]
+        new_par[0] = tmp
+        c_free_sequence_par(new_par)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -540,10 +554,13 @@ cdef class VolumeParams:
         Argument:
         filename - path to the text file containing the parameters.
         """
-        # free the memory of previous C struct 
-        free(self._volume_par)
-        # read parameters from file to a new volume_par C struct
-        self._volume_par = c_read_volume_par(filename)
+        cdef volume_par *new_par = c_read_volume_par(filename)
+        if new_par == NULL:
+            raise IOError("Problem reading volume parameters.")
+        
+        # In place, because a Tracker may be holding on to the memory.
+        self._volume_par[0] = new_par[0]
+        free(new_par)
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
@@ -871,11 +888,12 @@ cdef class TargetParams:
         
         Fills up the fields of the object from the file and returns.
         """
-        free(self._targ_par)
-        self._targ_par = read_target_par(inp_filename)
-        
-        if self._targ_par == NULL:
+        cdef target_par *new_par = read_target_par(inp_filename)
+        if new_par == NULL:
             raise IOError("Problem reading target recognition parameters.")
+        
+        self._targ_par[0] = new_par[0]
+        free(new_par)
     
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From f8a091462ec6c027b09bf3634d3af2dd9334ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 75/85] fix: reading control parameters from Python crashed
 when failing

---
 py_bind/optv/parameters.pyx | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 9c7f162..cb05ed5 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -694,15 +694,26 @@ cdef class ControlParams:
     # Arguments:
     # filename - path to text file containing the parameters.
     def read_control_par(self, filename):
-        # free the memory of previous C struct and its inner strings before creating a new one
-        c_free_control_par(self._control_par)
-        # memory for _multimedia_params' mm_np struct was just freed,
-        # so set _multimedia params' mm_np pointer to NULL to avoid double free corruption 
-        self._multimedia_params._mm_np = NULL
+        cdef:
+            control_par *new_par
+            control_par tmp
+            mm_np *new_mm
+        
         # read parameters from file to a new control_par C struct
-        self._control_par = c_read_control_par(filename)
-        # set _multimedia_params's _mm_np to the new mm_np that just allocated and read into _control_par
-        self._multimedia_params.set_mm_np(self._control_par[0].mm)
+        new_par = c_read_control_par(filename)
+        if new_par == NULL:
+            raise IOError("Problem reading control parameters.")
+        
+        # Swap in place, because others may be holding on to the memory: a
+        # Tracker to the struct, _multimedia_params to its mm_np.
+        new_mm = new_par[0].mm
+        self._multimedia_params._mm_np[0] = new_mm[0]
+        tmp = self._control_par[0]
+        self._control_par[0] = new_par[0]
+        self._control_par[0].mm = self._multimedia_params._mm_np
+        tmp.mm = new_mm
+        new_par[0] = tmp
+        c_free_control_par(new_par)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
-- 
2.43.0


From 8b4de0e08f143ca0f124993fe31ed34663bb4fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 76/85] fix: parameters not given to the Python constructors
 were garbage, and no cameras crashed

---
 py_bind/optv/parameters.pyx | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index cb05ed5..68f31f6 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -1,5 +1,5 @@
 # Implementation of Python binding to parameters.h
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport malloc, calloc, free
 from libc.string cimport strncpy
 
 import numpy
@@ -75,7 +75,8 @@ cdef class MultimediaParams:
         n3 - index of refraction of final medium (e.g. water, 1.33).
         d - thickness of all but first and last layers, [mm].
         """
-        self._mm_np = < mm_np *> malloc(sizeof(mm_np))
+        self._mm_np = < mm_np *> calloc(1, sizeof(mm_np))
+        self._mm_np[0].nlay = 1
         
         if kwargs.has_key('n1') and kwargs['n1'] is not None:
             self.set_n1(kwargs['n1'])
@@ -180,7 +181,7 @@ cdef class TrackingParams:
             positions that have enough targets but no matching correspondence
             result (boolean int).
         """
-        self._track_par = < track_par *> malloc(sizeof(track_par))
+        self._track_par = < track_par *> calloc(1, sizeof(track_par))
         
         if 'accel_lim' in kwds:
             self.set_dacc(kwds['accel_lim'])
@@ -355,7 +356,14 @@ cdef class SequenceParams:
             raise ValueError(
                 "SequenceParams requires either num_cams or image_base")
         
+        if num_cams < 1:
+            raise ValueError("At least one camera is needed.")
+        
         self._sequence_par = c_new_sequence_par(num_cams)
+        self.set_first(0)
+        self.set_last(0)
+        for cam in range(num_cams):
+            self._sequence_par[0].img_base_name[cam][0] = 0
         
         if 'frame_range' in kwargs:
             self.set_first(kwargs['frame_range'][0])
@@ -426,6 +434,8 @@ cdef class SequenceParams:
         else: raise TypeError("Unhandled comparison operator " + operator)
         
     def __dealloc__(self):
+        if self._sequence_par == NULL: # failed to initialize
+            return
         c_free_sequence_par(self._sequence_par)
         
 cdef class VolumeParams:
@@ -449,7 +459,7 @@ cdef class VolumeParams:
             calculated from match of the different target measures to the 
             reference values in this object.
         """
-        self._volume_par = < volume_par *> malloc(sizeof(volume_par))
+        self._volume_par = < volume_par *> calloc(1, sizeof(volume_par))
         
         if 'x_span' in kwargs:
             self.set_X_lay(kwargs['x_span'])
@@ -592,7 +602,15 @@ cdef class ControlParams:
         pixel_size - sequence, w,h pixel size in mm.
         cam_side_n, wall_ns, wall_thicks, object_side_n - see MultimediaParams
         """
+        if cams < 1:
+            raise ValueError("At least one camera is needed.")
+        
         self._control_par = c_new_control_par(cams)
+        for cam in range(cams):
+            self._control_par[0].img_base_name[cam][0] = 0
+            self._control_par[0].cal_img_base_name[cam][0] = 0
+        self.set_image_size((0, 0))
+        self.set_pixel_size((0, 0))
         self.set_hp_flag('hp' in flags)
         self.set_allCam_flag('allcam' in flags)
         self.set_tiff_flag('headers' in flags)
@@ -757,6 +775,8 @@ cdef class ControlParams:
         # function from freeing it. MultimediaParams object will free this
         # memory in its python destructor when there will be no references to it.
         
+        if self._control_par == NULL: # failed to initialize
+            return
         self._control_par[0].mm = NULL
         c_free_control_par(self._control_par)
 
@@ -784,7 +804,7 @@ cdef class TargetParams:
         if gvthresh is None:
             gvthresh = [0] * 4
         
-        self._targ_par = <target_par *> malloc(sizeof(target_par))
+        self._targ_par = <target_par *> calloc(1, sizeof(target_par))
         
         self.set_max_discontinuity(discont)
         self.set_grey_thresholds(gvthresh)
-- 
2.43.0


From 7e1d39dd2c78584ae7c88d489e7d515d907d4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 77/85] fix: parameter setters in Python wrote outside the
 arrays they fill

---
 py_bind/optv/parameters.pyx | 38 ++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 68f31f6..9aab49f 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -29,6 +29,15 @@ cdef extern from "optv/parameters.h":
     
     target_par* read_target_par(char *filename)
 
+DEF MAX_NAME = 240 # The space that liboptv allocates for a base name.
+
+cdef check_camera(int cam, int num_cams):
+    """
+    Raises IndexError if there is no camera numbered ``cam``.
+    """
+    if cam < 0 or cam >= num_cams:
+        raise IndexError("Camera number out of range.")
+
 cdef numpy.ndarray wrap_1d_c_arr_as_ndarray(object base_obj, 
     int arr_size, int num_type, void * data, int copy):
     """
@@ -102,6 +111,8 @@ cdef class MultimediaParams:
     def set_layers(self, refr_index, thickness):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
+        elif len(refr_index) > 3:
+            raise ValueError("Can't store more than 3 layers.")
         else:
             for i in range(len(refr_index)):
                 self._mm_np[0].n2[i] = refr_index[i]
@@ -413,6 +424,7 @@ cdef class SequenceParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        check_camera(cam, self._sequence_par[0].num_cams)
         cdef char * c_str = self._sequence_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
@@ -421,7 +433,10 @@ cdef class SequenceParams:
     def set_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
         cdef char * c_string = py_byte_string
-        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        check_camera(cam, self._sequence_par[0].num_cams)
+        if len(py_byte_string) >= MAX_NAME:
+            raise ValueError("Image base name is too long.")
+        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
@@ -488,6 +503,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].X_lay, copy)
     
     def set_X_lay(self, X_lay):
+        if len(X_lay) != 2:
+            raise ValueError("X_lay must have exactly two elements.")
         for i in range(len(X_lay)):
             self._volume_par[0].X_lay[i] = X_lay[i]
             
@@ -496,6 +513,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmin_lay, copy)
 
     def set_Zmin_lay(self, Zmin_lay):
+        if len(Zmin_lay) != 2:
+            raise ValueError("Zmin_lay must have exactly two elements.")
         for i in range(len(Zmin_lay)):
             self._volume_par[0].Zmin_lay[i] = Zmin_lay[i]
             
@@ -504,6 +523,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmax_lay, copy)
     
     def set_Zmax_lay(self, Zmax_lay):
+        if len(Zmax_lay) != 2:
+            raise ValueError("Zmax_lay must have exactly two elements.")
         for i in range(len(Zmax_lay)):
             self._volume_par[0].Zmax_lay[i] = Zmax_lay[i]
             
@@ -735,6 +756,7 @@ cdef class ControlParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
+        check_camera(cam, self._control_par[0].num_cams)
         cdef char * c_str = self._control_par[0].img_base_name[cam]
         cdef py_str = c_str
         return py_str
@@ -743,10 +765,14 @@ cdef class ControlParams:
     def set_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
         cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        check_camera(cam, self._control_par[0].num_cams)
+        if len(py_byte_string) >= MAX_NAME:
+            raise ValueError("Image base name is too long.")
+        strncpy(self._control_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
+        check_camera(cam, self._control_par[0].num_cams)
         cdef char * c_str = self._control_par[0].cal_img_base_name[cam]
         cdef py_str = c_str
         return py_str
@@ -755,7 +781,10 @@ cdef class ControlParams:
     def set_cal_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
         cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(new_img_name) + 1)
+        check_camera(cam, self._control_par[0].num_cams)
+        if len(py_byte_string) >= MAX_NAME:
+            raise ValueError("Image base name is too long.")
+        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     def get_multimedia_params(self):
         return self._multimedia_params
@@ -830,6 +859,9 @@ cdef class TargetParams:
         copy - if True, return a copy of the underlying array. This way the 
             original is safe.
         """
+        if num_cams < 0 or num_cams > 4:
+            raise ValueError("There are at most 4 grey-level thresholds.")
+        
         return wrap_1d_c_arr_as_ndarray(self, num_cams, numpy.NPY_INT, 
             self._targ_par.gvthres, (1 if copy else 0))
         
-- 
2.43.0


From d7e9b48e2bd4dbebb6e82c173258bc7c6bb4453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 78/85] fix: TargetParams equality in Python ignored the values

---
 py_bind/optv/parameters.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 9aab49f..3a74010 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -28,6 +28,7 @@ cdef extern from "optv/parameters.h":
     int c_compare_control_par "compare_control_par"(control_par * c1, control_par * c2);
     
     target_par* read_target_par(char *filename)
+    int c_compare_target_par "compare_target_par"(target_par *targ1, target_par *targ2)
 
 DEF MAX_NAME = 240 # The space that liboptv allocates for a base name.
 
@@ -958,5 +959,15 @@ cdef class TargetParams:
         self._targ_par[0] = new_par[0]
         free(new_par)
     
+    # Checks for equality between self and other TargetParams objects
+    # Gives the ability to use "==" and "!=" operators on two TargetParams objects
+    def __richcmp__(TargetParams self, TargetParams other, operator):
+        c_compare_result = c_compare_target_par(self._targ_par, other._targ_par)
+        if (operator == 2):  # "==" action was performed
+            return (c_compare_result != 0)
+        elif(operator == 3):  # "!=" action was performed
+            return (c_compare_result == 0)
+        else: raise TypeError("Unhandled comparison operator " + str(operator))
+    
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From 2f8124b387a767cac8cea9597b073ec93d096e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 79/85] fix: Tracker in Python used names and calibrations
 after they were freed

---
 py_bind/optv/tracker.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index cbf47d3..e52c328 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -40,7 +40,8 @@ cdef class Tracker:
         """
         # We need to keep a reference to the Python objects so that their
         # allocations are not freed.
-        self._keepalive = (cpar, vpar, tpar, spar, cals)
+        self._keepalive = (cpar, vpar, tpar, spar, tuple(cals), 
+            naming['corres'], naming['linkage'], naming['prio'])
         
         self.run_info = tr_new(spar._sequence_par, tpar._track_par,
             vpar._volume_par, cpar._control_par, TR_BUFSPACE, MAX_TARGETS,
@@ -93,6 +94,9 @@ cdef class Tracker:
         return self.step
     
     def __dealloc__(self):
+        if self.run_info == NULL: # failed to initialize
+            return
+        
         # Don't call tr_free, just free the memory that belongs to us.
         fb_free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
-- 
2.43.0


From 050cf7e46846f883eeb713b5fc1ececf10e69672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 80/85] fix: targets in Python outlived their array, and IO
 failures went unnoticed

---
 py_bind/optv/tracking_framebuf.pxd | 1 +
 py_bind/optv/tracking_framebuf.pyx | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/tracking_framebuf.pxd b/py_bind/optv/tracking_framebuf.pxd
index 1a29a35..8d5decc 100644
--- a/py_bind/optv/tracking_framebuf.pxd
+++ b/py_bind/optv/tracking_framebuf.pxd
@@ -38,6 +38,7 @@ cdef extern from "optv/tracking_frame_buf.h":
 cdef class Target:
     cdef target* _targ
     cdef int _owns_data
+    cdef object _owner # keeps alive the array that data belongs to.
     cdef void set(Target self, target* targ)
 
 cdef class TargetArray:
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 06b5f3f..ccac774 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -166,7 +166,9 @@ cdef class TargetArray:
         file_base - path to the file, base part.
         frame_num - frame number part of the file name.
         """
-        write_targets(self._tarr, self._num_targets, file_base, frame_num)
+        if not write_targets(self._tarr, self._num_targets, file_base, 
+                frame_num):
+            raise IOError("Failed to write targets.")
 
     def __getitem__(self, int ix):
         """
@@ -187,6 +189,7 @@ cdef class TargetArray:
         
         ret = Target()
         ret.set(self._tarr + ix)
+        ret._owner = self
         return ret
     
     def __len__(self):
@@ -220,6 +223,10 @@ def read_targets(basename, int frame_num):
     c_string = py_byte_string
     
     num_targets = c_read_targets(tarr, c_string, frame_num)
+    if num_targets < 0:
+        free(tarr)
+        raise IOError("Failed to read targets.")
+    
     ret.set(tarr, num_targets, 1)
     
     return ret
-- 
2.43.0


From 2af518a2dcd669ca1729764cde159c0d995c0895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 81/85] fix: Frame in Python crashed when not read yet or for a
 missing camera

---
 py_bind/optv/tracking_framebuf.pyx | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index ccac774..e34f177 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -282,17 +282,21 @@ cdef class Frame:
         prio_file_base - optional, for the linkage file with added 'prio'
             column.
         """
-        cdef char **targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        cdef char **targ_fb
         cdef char* pb
         
-        for cam in range(self._num_cams):
-            targ_fb[cam] = target_file_base[cam]
+        if len(target_file_base) < self._num_cams:
+            raise ValueError("Need a target file base name for each camera.")
         
         if prio_file_base is None:
             pb = NULL
         else:
             pb = prio_file_base
         
+        targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
+        for cam in range(self._num_cams):
+            targ_fb[cam] = target_file_base[cam]
+        
         if self._frm == NULL:
             self._frm = <frame *> malloc(sizeof(frame))
         else:
@@ -302,6 +306,7 @@ cdef class Frame:
         frame_init(self._frm, self._num_cams, MAX_TARGETS)
         success = read_frame(self._frm, corres_file_base, linkage_file_base, 
             pb, targ_fb, frame_num)
+        free(targ_fb)
         
         return success
      
@@ -314,6 +319,9 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos3d
             double *vec
         
+        if self._frm == NULL:
+            raise ValueError("Frame was not read yet.")
+        
         pos3d = np.empty((self._frm.num_parts, 3))
         for pt in range(self._frm.num_parts):
             vec = <double *>np.PyArray_GETPTR2(pos3d, pt, 0)
@@ -339,6 +347,11 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos2d
             int tix
         
+        if self._frm == NULL:
+            raise ValueError("Frame was not read yet.")
+        if cam < 0 or cam >= self._num_cams:
+            raise IndexError("Camera number out of range.")
+        
         pos2d = np.empty((self._frm.num_parts, 2))
         for pt in range(self._frm.num_parts):
             tix = self._frm.correspond[pt].p[cam]
-- 
2.43.0


From 73f171604deaab5994ce316ba3ad62bd096662ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 82/85] fix: correspondences with less than four cameras wrote
 beyond its candidate list

---
 liboptv/src/correspondences.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index d24e1ed..22041dd 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -620,7 +620,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /* Allocation of scratch buffers for internal tasks and return-value 
      space. 
   */
-  con0 = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel));
+  con0 = (n_tupel *) malloc(4*nmax * sizeof(n_tupel));
   con = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel)); 
   
   tim = safely_allocate_target_usage_marks(cpar->num_cams);
-- 
2.43.0


From d55da9a700a352c6982d11db8b18a16ded0a5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:32 +0000
Subject: [PATCH 83/85] fix: peak_fit split bright targets where grey value
 plus discontinuity exceeds 255

---
 liboptv/src/segmentation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index ff93663..70c2e98 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -261,6 +261,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     register int  i, j, k, l, m, n;     /* loop variables */
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
+    int           top;                /* greyvalue plus disco, may exceed 255 */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
     int           *label_img;           /* target number labeling */
     /* the following were not assigned, probably from globals */
@@ -455,8 +456,8 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           else for (unify=1, l=1; l<s12; l++) {
               intx1 = (int) (x1 + l * (x2 - x1) / s12);
               inty1 = (int) (y1 + l * (y2 - y1) / s12);
-              gv = *(img + inty1*imx + intx1) + disco;
-              if (gv < (gv1+l*(gv2-gv1)/s12) || gv<gv1 || gv<gv2)   unify = 0;
+              top = *(img + inty1*imx + intx1) + disco;
+              if (top < (gv1+l*(gv2-gv1)/s12) || top<gv1 || top<gv2)   unify = 0;
               if (unify == 0)   break;
           }
           if (unify == 0) {
-- 
2.43.0


From c214d1d7420883ddaaae8fad65bcdacee43810e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 84/85] fix: Tracker in Python left its frame buffer allocated

---
 py_bind/optv/tracker.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index e52c328..f322770 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -99,6 +99,7 @@ cdef class Tracker:
         
         # Don't call tr_free, just free the memory that belongs to us.
         fb_free(self.run_info.fb)
+        free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
         free(self.run_info) # not using tr_free() which assumes ownership of 
-- 
2.43.0


From 480a8119bef7072d72b39033f77395c5b1084b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 85/85] fix: projection through media gave up on cameras close
 to the glass

The search for the point of refraction stopped after 40 iterations, before
it had converged when the camera is close to the glass compared to the depth
of the point, and the point was projected as if there was no refraction.
---
 liboptv/src/multimed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index fbfe2ec..306f912 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -57,7 +57,7 @@ void  multimed_nlay (Calibration *cal, mm_np *mm, vec3d pos,
 */
 double multimed_r_nlay (Calibration *cal, mm_np *mm, vec3d pos) {
     int i, it = 0;
-    int n_iter = 40;
+    int n_iter = 200; /* slow for a camera close to the glass */
     double beta1, beta2[32], beta3, r, rbeta, rdiff, rq, mmf=1.0;
     double X,Y,Z;
     double zout;
-- 
2.43.0

